#!/usr/bin/env python3
"""check.py <property>: decide one property against /repo's current working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from common import Check, ToolError, log
import registry


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    level, fn = registry.REG[pid]
    chk = Check(pid, level)
    try:
        rc = fn(chk)
    except ToolError as e:
        log("ERROR:", e)
        if chk.viol:
            sys.exit(chk.finish())
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        if chk.viol:
            sys.exit(chk.finish())
        sys.exit(2)
    sys.exit(rc)


main()
