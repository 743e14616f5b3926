"""setup_cmd: compiles the driver and warms the cargo target directories of every witness."""
import os
import sys
import traceback
import common as C

sys.setrecursionlimit(20000)
C.ensure_driver()
W = os.path.join(C.ROOT, "witness")


def layout():
    C.run_driver(os.path.join(W, "layout"), ["witness_layout"], "layout", "", target="layout")


def mod(name, fn):
    def f():
        getattr(__import__(name), fn)()
    return f


def warm(what, f):
    try:
        f()
        print("warmed", what)
    except C.Rejected as e:
        print("cannot warm", what, ":", e, "\n", e.log[-1500:])
    except Exception:
        traceback.print_exc()


WARM = [("layout", layout), ("markers", mod("p_c10", "warm")), ("programs", mod("programs", "build")), ("facts", mod("facts", "load")), ("reports", mod("p_c06", "warm")), ("config", mod("p_c24", "warm")), ("exports", mod("importrules", "warm")), ("objects", mod("p_c09", "load"))]
for name, f in WARM:
    warm(name, f)
sys.exit(0)
