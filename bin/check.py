#!/usr/bin/env python3
"""python3 bin/check.py <property id>   decides one property on /repo's working tree (VERIF_TIER, VERIF_SEED)."""
import sys, os, importlib, glob, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'checks')]
import vf

REG = {}


def main():
    pid = sys.argv[1]
    for f in sorted(glob.glob(os.path.join(os.path.dirname(HERE), 'checks', '*.py'))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        REG.update(m.CHECKS)
    level, fn = REG[pid]
    c = vf.Check(pid, level)
    try:
        fn(c)
        return c.finish()
    except vf.Err as e:
        print('CHECK ERROR', pid, e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == '__main__':
    sys.exit(main())
