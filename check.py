#!/usr/bin/env python3
"""python3 check.py Cxx — decides one property on /repo's current tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(20000)
import common  # noqa: E402


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        common.TIER = sys.argv[2]
    mod = importlib.import_module("p_" + prop.lower())
    rep = None
    try:
        rep = mod.check()
        return rep.finish()
    except common.Rejected as e:
        ok, log = common.repo_compiles()
        if not ok:
            print(log[-3000:])
            print("ERROR: /repo does not compile")
            return 2
        rep = common.Report(prop, "other", "a program the library must accept is rejected")
        errs = [l for l in e.log.splitlines() if l.startswith("error")]
        rep.count("accepted programs", 1)
        rep.violation("rejected|" + (errs[0] if errs else "?"),
                      "%s although the library compiles: %s\n%s" % (e, "; ".join(errs[:5]), e.log[-3000:]))
        return rep.finish()
    except Exception:
        traceback.print_exc()
        print("ERROR: the check could not complete")
        return 2


if __name__ == "__main__":
    sys.exit(main())
