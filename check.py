#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property for the code in /repo's working tree."""
import os, sys, traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import runner


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = runner.Ctx(prop, tier, seed)
    try:
        try:
            group(prop).run(ctx)
        except runner.Failed:
            pass
        rc = ctx.finish()
    except runner.Broken as e:
        print("CHECK-ERROR %s: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        rc = 2
    finally:
        ctx.clean()
    sys.exit(rc)


def group(prop):
    if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C20"):
        import checks_day as g
    elif prop in ("C11", "C12", "C13"):
        import checks_life as g
    elif prop in ("C14", "C15", "C16", "C17"):
        import checks_model as g
    elif prop in ("C18", "C19", "C21"):
        import checks_io as g
    elif prop in ("C09", "C10"):
        import checks_comm as g
    else:
        raise runner.Broken("no check")
    return g


main()
