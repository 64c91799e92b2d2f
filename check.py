#!/usr/bin/env python3
"""python3 check.py <PROPERTY> : decide one property from /repo's current source."""
import ctypes
import os
import resource
import sys
import threading
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
from yva.registry import run
from yva.lib import DEADLINES, OutOfTime
rc = [3]


def main():
    try:
        rc[0] = run(sys.argv[1])
    except BaseException:
        import traceback
        traceback.print_exc()
        rc[0] = 3


t = threading.Thread(target=main)
t.start()
while t.is_alive():
    t.join(0.5)
    top = DEADLINES[-1:]
    if top and time.time() > top[0]:
        # the analysis thread gives up on the innermost group
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))
        t.join(5)
sys.stdout.flush()
os._exit(rc[0])
