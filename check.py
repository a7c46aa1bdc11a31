#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo.

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION
line: it is broken.  Exit 2: no answer.
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import common                                                   # noqa: E402
import plans                                                    # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    run = common.Run(prop, tier, seed)
    try:
        run.build()
        level = plans.PLANS[prop](run)
        rc = run.finish(level, time.time() - t0)
    except common.NoAnswer as e:
        print('NO ANSWER: %s' % e)
        rc = 2
        if run.violations:
            # what was found before counts all the same
            run.unjudged = []
            if run.finish('exploration', time.time() - t0):
                rc = 1
    finally:
        run.cleanup()
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
