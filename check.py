#!/usr/bin/env python3
"""check.py --property C01 [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine import lib  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    R = lib.Report(a.property, a.tier, int(os.environ.get('VERIF_SEED') or 1))
    try:
        importlib.import_module('checks.' + a.property.lower()).run(R)
    except lib.Broken as e:
        if not R.found:
            print('ANALYSIS-BROKEN property=%s %s' % (a.property, e))
            return 2
    except Exception:
        traceback.print_exc()
        if not R.found:
            return 2
    return R.finish()


if __name__ == '__main__':
    sys.exit(main())
