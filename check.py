#!/usr/bin/env python3
"""Run one static check: check.py C01 [--thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.check import main  # noqa: E402

if __name__ == "__main__":
    import threading
    res = []
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1], tier)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
