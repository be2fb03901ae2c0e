#!/usr/bin/env python3-vt
"""run.py ID  - run the check of one property (VERIF_TIER, VERIF_SEED from the environment)"""
import os, sys, importlib.util
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)


def main():
    pid = sys.argv[1]
    sp = importlib.util.spec_from_file_location(pid, os.path.join(V, "checks", pid + ".py"))
    m = importlib.util.module_from_spec(sp)
    sys.modules[pid] = m
    sp.loader.exec_module(m)
    return m.main()


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
