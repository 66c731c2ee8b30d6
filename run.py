#!/usr/bin/env python3
"""run.py <property>: decides one property on /repo's current tree."""
import sys, os, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vf

def main():
    p = sys.argv[1]
    import checks
    try:
        c = vf.Check(p)
        rc = checks.CHECKS[p](c)
    except vf.Inconclusive as e:
        print('ERROR (undecided): %s' % str(e)[:4000])
        rc = 2
    sys.stdout.flush()
    return rc

if __name__ == '__main__':
    sys.exit(main())
