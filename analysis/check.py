#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current sources."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
from report import Report


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    R = Report(prop, tier, seed)
    try:
        lib, wit, key, _ = facts.ensure()
    except facts.BuildError as e:
        print(e)
        return 2
    from program import Program, MissingAnchor
    import checks
    P = Program(lib)
    W = Program(wit)
    f = checks.find(prop)
    R.rule = (f.__doc__ or "").strip()
    import gc
    gc.disable()
    try:
        info = f(R, P, W) or {}
    except MissingAnchor as e:
        R.ob("anchor:" + str(e)[:120], False, "an item the property is anchored in is missing: %s" % e, "")
        info = {}
    info["source_sha256"] = key
    info["functions_in_crate"] = len(P.bodies)
    return R.finish(info)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
