#!/usr/bin/env python3
"""check.py P05 : decide one property on the current tree of the repository"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    from mxsa.db import Broken
    from mxsa.rep import Rep
    from mxsa.prog import prog
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    try:
        rep = Rep(pid, tier, seed)
        P = prog()
        mod = importlib.import_module('mxsa.checks.' + pid.lower())
        extra = mod.run(rep, P)
        return rep.finish(extra)
    except Broken as e:
        print('CHECK BROKEN (%s): %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
