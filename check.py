#!/usr/bin/env python3
"""usage: check.py PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
exit 0: held; 1: VIOLATION line; 2: the check could not give an answer."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, props
from vlib.engine import Check

BUDGET = float(os.environ.get("VERIF_BUDGET", "600"))      # seconds of a thorough run


def main():
    prop = sys.argv[1]
    if prop == "selftest":
        from vlib import selftest
        return selftest.run()
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        c, t0 = None, time.time()
        while True:                              # thorough: round after round, each with the next seed, within the budget
            t = time.time()
            c = Check(prop, tier, seed, c)
            props.SETUP[prop](c)
            rc = c.run()
            core.tidy()
            now = time.time()
            if rc or tier == "quick" or now - t0 + 1.3 * (now - t) > BUDGET:
                return rc
            seed += 1
    except core.CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    sys.exit(main())
