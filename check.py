#!/usr/bin/env python3
"""check.py <PROPERTY> [--no-dump]: decide one property on /repo's current source.  Exit 0 held, 1 violated."""
import json, os, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 << 20)

def main():
    from sa import runner
    runner.main(V, sys.argv[1:], out)
out = {"rc": 1}
th = threading.Thread(target=main)
th.start()
th.join()
sys.stdout.flush()
os._exit(out["rc"])
