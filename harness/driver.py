# Python 2.7.  driver.py LADIR PROP N SEED OUT: record N calls for a property.
import os
import random
import shutil
import sys
import tempfile
import traceback
import warnings

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
ladir, prop, n, seed, out = sys.argv[1:6]
n = int(n)
sys.path.insert(0, ladir)

import numpy as np
np.seterr(all='ignore')
warnings.simplefilter('ignore')

import la
import rec
import gen
import ops_core
import ops_calc
import ops_more

assert os.path.abspath(la.__file__).startswith(os.path.abspath(ladir)), la.__file__


def main():
    g = gen.G(la, 'r%s-%s' % (seed, prop))
    np.random.seed(g.ri(0, 10 ** 6))
    structural = prop in ('C02', 'C03', 'C04', 'C05', 'C08', 'C09', 'C10',
                          'C11', 'C12', 'C15', 'C24', 'C32', 'C33')
    LONG = ('C01', 'C06', 'C07', 'C13', 'C14', 'C17', 'C24')
    CALC = ('C16', 'C18', 'C20', 'C21', 'C22', 'C25')
    R = rec.Recorder(out)
    R.bits = structural
    skipped = 0
    tmp = tempfile.mkdtemp(prefix='larec')
    g.reuse = 0.25
    R.gen = g
    R.scratch = lambda name: os.path.join(tmp, name)
    try:
        if prop == 'ALL':
            table = [t for p in sorted(ops_core.OPS) for t in ops_core.OPS[p]]
        elif prop in ('C01', 'C13'):
            own = ops_core.OPS[prop]
            rest = [t for p in sorted(ops_core.OPS) if p != prop
                    for t in ops_core.OPS[p]]
            tot = sum(w for f, w in own)
            table = [(f, w * max(1, len(rest)) / (3.0 * tot)) for f, w in own] \
                + [(f, 1) for f, w in rest]
        else:
            table = ops_core.OPS[prop]
        only = os.environ.get('ONLY')
        if only:
            table = [t for t in table if t[0].__name__ == only]
        # every operation gets its share, in an order that the seed decides
        tot = float(sum(w for f, w in table))
        plan = []
        for f, w in table:
            plan += [f] * max(1, int(round(n * w / tot)))
        g.r.shuffle(plan)
        for f in plan:
            g.exact = ['bigint', 'frac'] if structural and g.p(0.5) else []
            g.long = 0.02 if structural or prop in LONG else \
                0.01 if prop in CALC else 0
            g.small = bool(g.exact) and prop not in ('C12', 'C04')
            try:
                f(g, R)
            except Exception:
                # preparing a call failed: in the library, or just here
                where = [os.path.abspath(z[0]) for z in
                         traceback.extract_tb(sys.exc_info()[2])]
                if any(w.startswith(os.path.abspath(ladir)) for w in where):
                    R.write({'op': 'setup', 'x': [], 'post': [], 'alias': 0,
                             'what': f.__name__,
                             'text': traceback.format_exc()[-1500:],
                             'out': {'st': 'err', 'exc': 'setup'}})
                else:
                    skipped += 1
                    if skipped < 4:
                        traceback.print_exc()
            if R.hangs > 2:
                break
    finally:
        R.close()
        shutil.rmtree(tmp, ignore_errors=True)
    print('recorded %d' % R.n)
    print('skipped %d' % skipped)
    for k in sorted(R.counts):
        print('  %s %d' % (k, R.counts[k]))


main()
