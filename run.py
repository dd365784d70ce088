#!/usr/bin/env python3
"""run.py <property> : decide one property of /repo's current source (static analysis only)"""
import importlib
import os
import sys
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import threading
    from sa import spec
    mod = importlib.import_module('sa.checks.' + pid.lower())
    R = spec.Report(pid, tier, seed)
    try:
        mod.check(R)
    except Exception as e:
        R.und('analysis', pid, 'the analysis could not be carried out', '%s: %s' % (type(e).__name__, e))
    R.join()
    if not R.obl:
        R.und('analysis', pid, 'no obligation was generated')
    rc = spec.finish(R, mod.LEVEL, mod.EXPLANATION)
    if '-v' in sys.argv:
        for o in R.obl:
            print(o['status'].upper(), spec.okey(o), o['detail'][:500] if o['status'] != 'ok' else '')
    return rc


if __name__ == '__main__':
    sys.exit(main())
