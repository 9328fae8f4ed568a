#!/usr/bin/env python3
"""check.py ID: decides one property of /repo's working tree.  See DESIGN.md."""
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/lib")
import ccbuild
import registry
import runner


def main():
    pid = sys.argv[1]
    spec = registry.CHECKS[pid]
    chk = runner.Check(pid, spec["rule"], spec.get("assumptions", ()), spec.get("min_cases", 50))
    chk.required = list(spec.get("required", ()))
    try:
        for part in spec["parts"]:
            part(chk)
    except ccbuild.BuildError as e:
        print("ERROR property=%s build failed\n%s" % (pid, e))
        return 2
    except runner.Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (pid, e))
        return 2
    return chk.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
