#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's working tree (see DESIGN.md)."""
import os
import random
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import orch    # noqa: E402
import suites  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = orch.Run(prop, tier, seed)
    try:
        level, rule = suites.PROPS[prop](run, random.Random(seed * 7919 + int(prop[1:])))
        return run.finish(level, rule)
    except orch.Machinery as e:
        print("MACHINERY ERROR:", e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        run.close()


if __name__ == "__main__":
    sys.exit(main())
