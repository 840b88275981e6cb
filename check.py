#!/usr/bin/env python3-vt
"""check.py Cxx [--tier quick|thorough] [--only substring] [-v]"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(40000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    from sa import report
    return report.run(a)


if __name__ == '__main__':
    if not os.environ.get('SA_STACK'):
        import resource
        os.environ['SA_STACK'] = '1'
        os.environ['PYTHONHASHSEED'] = '0'
        try:
            h = resource.getrlimit(resource.RLIMIT_STACK)[1]
            want = 1 << 30
            if h != resource.RLIM_INFINITY:
                want = min(want, h)
            resource.setrlimit(resource.RLIMIT_STACK, (want, h))
        except (ValueError, OSError):
            pass
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
