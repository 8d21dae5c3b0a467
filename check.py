#!/usr/bin/env python3
"""check.py <property id>: decides one property; see DESIGN.md.   check.py --build: only builds the programs."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import core


def main():
    prop = sys.argv[1]
    if prop == "--build":
        for name in ("10", "19", "21", "23"):
            try:
                importlib.import_module("lib.p" + name).programs()
            except core.CheckError as e:      # the check itself decides what that means
                print("note: %s" % str(e)[:300])
        print(core.build_driver())
        return
    mod = importlib.import_module("lib.p" + prop[1:])
    check = core.Check(prop)
    try:
        mod.run(check)
        check.held()
    except core.CheckError as e:
        check.work.remove()
        print("ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        check.work.remove()
        traceback.print_exc()
        sys.exit(2)


main()
