"""Command line: python3 -m tfcheck.cli <property> [--tier quick|thorough]"""
import os
import sys
import time


def main(argv):
    from . import core, registry
    if not argv:
        print("usage: check <property> [--tier quick|thorough]")
        return 2
    prop = argv[0]
    tier = "thorough" if "thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if prop == "all":
        rc = 0
        for p in registry.PROPS:
            rc = max(rc, one(p, tier, core, registry))
        return rc
    return one(prop, tier, core, registry)


def one(prop, tier, core, registry):
    t0 = time.time()
    spec = registry.PROPS[prop]
    ctx = core.Ctx(tier)
    failed = None
    try:
        spec["fn"](ctx)
    except Exception as x:          # an analysis failure is not a verdict; what was refuted before it still is
        import traceback
        failed = traceback.format_exc()
        ctx.inconclusive.append("analysis stopped: %s: %s" % (type(x).__name__, x))
    rc = core.finish(prop, ctx, spec["floor"], spec["rule"], spec.get("assumptions", []), t0)
    if failed and rc != 1:
        print(failed)
        return 3
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException as e:      # an analysis failure is not a verdict
        import traceback
        traceback.print_exc()
        print("ERROR: %s" % e)
        sys.exit(3)
