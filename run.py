#!/usr/bin/env python3
"""run.py <property>: one check. VERIF_SEED, VERIF_TIER. Exit 0 held, 1 violation, 2 could not decide."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib.mon import Check, Inconclusive, vmon_part
from lib.rules import RULES


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    c = Check(pid, "thorough" if tier == "thorough" else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        if pid in RULES:
            vmon_part(c, RULES[pid])
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "drivers", pid.lower() + ".py")
        if os.path.exists(d):
            importlib.import_module("drivers." + pid.lower()).main(c)
    except Inconclusive as e:
        if not c.fails:
            print(f"{pid}: could not decide: {e}", file=sys.stderr)
            return 2
        print(f"{pid}: stopped early: {e}", file=sys.stderr)
    except Exception:
        traceback.print_exc()
        if not c.fails:
            return 2
    return c.finish()


sys.exit(main())
