#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property (see MANIFEST.json)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import core, props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = props.PROPS[prop]
    ctx = core.Ctx(prop, tier, seed)
    try:
        p["run"](ctx)
        return core.finish(ctx, p.get("level", "model_checking"), p.get("assumptions", ()), p.get("rule"))
    except core.Err as e:
        print(f"CHECK-ERROR property={prop}: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.close()


sys.exit(main())
