#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mbv import core
from mbv.registry import CHECKS


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname, fn = CHECKS[prop]
    ctx = core.Ctx(prop, tier, seed, 240 if tier == "quick" else 840)
    try:
        getattr(importlib.import_module("mbv." + modname), fn)(ctx)
    except core.Violation as v:
        ctx.evidence(1)
        print(v)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        return 1
    except core.CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e), flush=True)
        return 3
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s: internal error" % prop, flush=True)
        return 3
    ctx.evidence(0)
    for k, text in ctx.known:
        if ctx.known_hit.get(k):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    ctx.log("OK: %d states, %d transitions, %d traces, %d steps on the real code" %
            (ctx.states, ctx.transitions, ctx.traces, ctx.steps))
    return 0


if __name__ == "__main__":
    sys.exit(main())
