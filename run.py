#!/usr/bin/env python3
"""run.py <property id>: decides one property on /repo's working tree (VERIF_TIER=quick|thorough)."""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import drv, profiles, inp, conc, cfg, out, mac, obj, bld, rel, mach


def main():
    pid = sys.argv[1]
    if pid == "--setup":   # everything is built by the checks themselves; make sure the tools are there
        drv.sh(["gcc", "--version"]); drv.sh(["g++", "--version"])
        return 0
    fn = next(f for f in (getattr(m, "check_" + pid, None) for m in (profiles, inp, conc, cfg, out, mac, obj, bld, rel, mach)) if f)
    try:
        return fn()
    except drv.NoBuild as e:
        # the current tree does not build: nothing is decided
        print("ERROR: build failed\n%s" % e)
        return 2
    except drv.HarnessError as e:
        print("ERROR: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4


if __name__ == "__main__":
    sys.exit(main())
