#!/usr/bin/env python3
"""check.py <property-id> : decides one property on /repo's current sources by static analysis.
exit 0 held; exit 1 + 'VIOLATION property=<id> replay=<path>'; exit 2 analysis broken."""
import sys, os, time, json, importlib, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [VERIF + "/lib", VERIF + "/analyses"]
sys.setrecursionlimit(20000)
import ir
from ctx import Ctx

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        mod = importlib.import_module(pid.lower())
        P = ir.load()
        ctx.P = P
        mod.run(P, ctx)
        ctx.finish(time.time() - t0)
    except ir.AnalysisBroken as ex:
        print(f"ANALYSIS-BROKEN property={pid}: {ex}")
        return 2
    except Exception:
        print("".join(traceback.format_exc().splitlines(True)[-16:]), file=sys.stderr)
        print(f"ANALYSIS-BROKEN property={pid}: internal error")
        return 2
    return 1 if ctx.new else 0
if __name__ == "__main__":
    sys.exit(main())
