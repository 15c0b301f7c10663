#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   |   check.py --replay <file>"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lcpv import core  # noqa: E402

if __name__ == '__main__':
    try:
        rc = core.main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
