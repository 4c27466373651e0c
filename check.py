#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property. Exit 0 held, 1 violated, 2 error of the check."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("checks." + prop)
        mod.run(ctx)
        rc = ctx.finish(getattr(mod, "LEVEL", "model_checking"), getattr(mod, "ASSUMPTIONS", []))
    except vlib.CheckError as e:
        print("ERROR of the check %s: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


main()
