#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property from /repo's current source (static analysis).

exit 0: held on everything analysed; 1: VIOLATION line printed; 3: the analysis could not be carried out."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import threading
from common import *


def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    try:
        m = importlib.import_module(pid.lower())
        c = Check(pid, tier)
        return m.run(c)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        if os.environ.get("VERBOSE"):
            traceback.print_exc()
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 3


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    rc = [3]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
