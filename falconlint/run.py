"""falconlint: decide one property of falcon from its source.
   usage: run.py PROPERTY [quick|thorough]"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 << 20)

import build_ir
import chk
import interp
import lib

from registry import CHECKS


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod, fn, level, technique, explain, trusted = CHECKS[prop]
    ctx = chk.Ctx(prop, tier)
    try:
        getattr(importlib.import_module("checks." + mod), fn)(ctx)
    except build_ir.BuildError as e:
        print("ERROR: the analysis unit does not build\n%s" % e)
        return 3
    except lib.Anchor as e:
        print("ERROR: anchor lost: %s" % e)
        if ctx.viol:
            return ctx.finish(level, explain, trusted, technique)
        return 4
    except interp.Stop as e:
        print("ERROR: outside what the analysis understands: %s" % e)
        if ctx.viol:
            return ctx.finish(level, explain, trusted, technique)
        return 5
    return ctx.finish(level, explain, trusted, technique)


if __name__ == "__main__":
    rc = [6]

    def go():
        try:
            rc[0] = main()
        except BaseException:
            traceback.print_exc()
            rc[0] = 6
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
