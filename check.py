#!/usr/bin/env python3
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks.lib import main
if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    try:
        rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    except Exception:
        print('ANALYSIS-BROKEN\n' + traceback.format_exc()[-1800:])
        rc = 3
    sys.exit(rc)
