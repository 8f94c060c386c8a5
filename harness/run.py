"""python -m harness.run <property> [quick|thorough] | --replay <file>"""
import json
import os
import sys
import traceback

from . import core


def main():
    if sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        pid, tier = rp["property"], "quick"
    else:
        rp, pid = None, sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = None
    try:
        sys.path.insert(0, str(core.REPO))
        ctx = core.Context(pid, tier, seed)
        core.build()
        ctx.log("built /repo")
        if rp:
            ctx.only_cases = [v["case"] for v in rp["violations"]]
            ctx.mod.replay(ctx)
        else:
            ctx.mod.run(ctx)
        rc = ctx.finish(ctx.mod.LEVEL, getattr(ctx.mod, "ASSUMPTIONS", ()))
    except core.CheckError as e:
        if ctx is not None and ctx.violations:      # already decided: the code broke the property
            sys.exit(ctx.finish(ctx.mod.LEVEL, getattr(ctx.mod, "ASSUMPTIONS", ())))
        print(f"CHECK-ERROR {pid}: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
