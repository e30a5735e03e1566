#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner, config
if __name__ == "__main__":
    p = sys.argv[1]
    try:
        rc = runner.decide(p, config.CFG[p])
    except Exception as e:
        import traceback; traceback.print_exc(); rc = 3
    sys.exit(rc)
