#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib


def main():
    pid = sys.argv[1]
    import checks
    fn = getattr(checks, pid.lower(), None)
    if fn is None:
        print("unknown property", pid)
        return 2
    ctx = vlib.Ctx(pid)
    try:
        fn(ctx)
        return ctx.finish()
    except vlib.CheckError as e:
        print("ERROR of the check:", e, flush=True)
        # what the real code has already shown to be wrong stays a finding
        if ctx.mismatches:
            return ctx.finish()
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.work)
        else:
            ctx.close()


sys.exit(main())
