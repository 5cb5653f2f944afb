#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   exit 0: held; exit 1 with a VIOLATION line: broken."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from checks import Check
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(pid, tier, seed)
    try:
        c.run()
        return c.report()
    except Exception:
        traceback.print_exc()
        return 2
sys.exit(main())
