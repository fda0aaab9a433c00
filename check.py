#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property of /repo's source."""
import os
import sys

sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dsa.runner import main  # noqa: E402

if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
