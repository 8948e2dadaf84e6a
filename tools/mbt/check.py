#!/usr/bin/env python3
"""check.py <property>: decides one property (VERIF_TIER, VERIF_SEED from the environment)."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402


MODULES = ["instr", "covdata", "runtime", "files", "plugin"]


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        core.TIER = sys.argv[2]
    rep = core.Report(prop, "model_checking")
    try:
        import importlib
        for name in MODULES:
            mod = importlib.import_module(name)
            if prop in mod.PLAN:
                mod.run(rep)
                return rep.done()
        raise core.CheckError("no check for " + prop)
    except core.CheckError as e:
        print("CHECK ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
