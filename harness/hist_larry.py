# Python 2.7.  hist_larry.py LADIR PROP N SEED OUT: programs on larrys.
#
# Keeps a few larrys alive, calls the operations on them one after the other,
# and writes down for every step: the call and its outcome, where the cells
# and the lists of labels of its results are (as numbered addresses), and
# which of the living larrys look different from before.  HeapTrace.tla judges.
# With a PLAN file (LA_PLAN), replays the behaviours in it instead.
import json
import os
import random
import shutil
import sys
import tempfile
import traceback
import warnings

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
ladir, prop, n, seed, out = sys.argv[1:6]
n = int(n)
sys.path.insert(0, ladir)

import numpy as np
np.seterr(all='ignore')
warnings.simplefilter('ignore')

import la
import rec
import gen
from rec import (Lb, Lbs, Ce, VIs, Universe, NOAXIS, is_larry, snap, collect,
                 collect_arg, enc_arg, enc_snap)
import ops_core as oc
import ops_calc

assert os.path.abspath(la.__file__).startswith(os.path.abspath(ladir)), la.__file__


class HG(gen.G):
    "A generator that takes its larrys from the ones that are alive."

    POOL = ['int', 'int', 'str', 'str', 'float', 'mixnum', 'date', 'datetime',
            'time', 'bigint']

    def start(self, H):
        self.H = H
        self.lp = self.ch(self.POOL)
        self.uni = self.r.sample(gen.POOLS[self.lp], self.ri(9, 16))
        self.fromlive = False

    def universe(self, n, pool=None):
        if pool is None and n <= len(self.uni):
            return self.r.sample(self.uni, n)
        return gen.G.universe(self, n, pool)

    def related(self, lab, uni):
        rest = [l for l in lab if l not in uni]
        return gen.G.related(self, lab, list(uni) + rest)

    def dtype(self, kind, f4=True):
        return gen.G.dtype(self, kind, False)

    def shape(self, ndim=None, maxn=5, minn=0, big=True, maxsize=160):
        return gen.G.shape(self, ndim, min(maxn, 4), minn, False,
                           min(maxsize, 36))

    def fits(self, y, kind, kinds, ndim, minn, maxsize):
        k = rec.kind_of(y.x.dtype)
        return (kind is None or k == kind) and (not kinds or k in kinds) and \
            (ndim is None or y.ndim == ndim) and \
            (not minn or min(y.shape) >= minn) and y.size <= maxsize

    def larry(self, sh=None, kind=None, kinds=None, unis=None, labs=None,
              pool=None, ndim=None, maxn=5, minn=0, big=True, maxsize=160,
              **kw):
        if labs is None and self.fromlive and self.p(0.85) and \
                (pool is None or pool == self.lp):
            c = [y for y in self.H.pool if
                 self.fits(y, kind, kinds, ndim if sh is None else len(sh),
                           minn, maxsize)]
            if c:
                return self.ch(c)
        if pool is not None and pool != self.lp and self.fromlive:
            pool = None
        return gen.G.larry(self, sh, kind, kinds, unis, labs, pool, ndim, maxn,
                           minn, big, maxsize, **kw)

    def pair(self, kinds=None, kind1=None, kind2=None, ndim=None, badnd=0.03,
             maxsize=60, kw1={}, kw2={}, **kw):
        if self.fromlive and self.p(0.75):
            c = [y for y in self.H.pool
                 if self.fits(y, kind1, kinds, ndim, 0, maxsize)]
            if c:
                x = self.ch(c)
                d = [y for y in self.H.pool
                     if self.fits(y, kind2, kinds, x.ndim, 0, maxsize)]
                if d and self.p(0.8):
                    return x, self.ch(d)
        live, self.fromlive = self.fromlive, False
        try:
            return gen.G.pair(self, kinds, kind1, kind2, ndim, badnd, maxsize,
                              kw1, kw2, **kw)
        finally:
            self.fromlive = live


class Program(rec.Recorder):

    MAXPOOL = 6

    def __init__(self, g):
        self.g = g
        self.timeout = 20
        self.hangs = 0
        self.raw = []
        self.var = {}           # id(object) -> number
        self.live = []          # (number, object)
        self.pool = []
        self.tmp = []           # numbers that leave at the next step
        self.next = 0
        self.addr = {}
        self.lid = {}
        self.u = Universe()
        self.counts = {}
        self.gen = None
        self.dead = False
        self.last = {}
        self.scratchdir = None

    # numbering
    def addresses(self, x):
        if x.size == 0:
            return []
        a = np.zeros(x.shape, dtype=np.int64) + x.__array_interface__['data'][0]
        for ax in range(x.ndim):
            sh = [1] * x.ndim
            sh[ax] = x.shape[ax]
            a = a + (np.arange(x.shape[ax]) * x.strides[ax]).reshape(sh)
        return [self.addr.setdefault(z, len(self.addr) + 1)
                for z in a.reshape(-1).tolist()]

    def list_(self, l):
        return self.lid.setdefault(id(l), len(self.lid) + 1)

    def ref(self, o, num):
        "Where o is, and its contents."
        s = snap(o)
        if is_larry(o):
            return {'id': num, 'snap': s, 'ad': self.addresses(o.x),
                    'lo': self.list_(o.label),
                    'll': [self.list_(l) for l in o.label]}
        if isinstance(o, VIs):
            # a list of labels (as an array without cells)
            return {'id': num, 'snap': ('L', 'f', [0], [], [list(o.live)], 0,
                                        8, '<f8'),
                    'ad': [], 'lo': 10 ** 6 + num,
                    'll': [self.list_(o.live)]}
        return {'id': num, 'snap': s[:4] + ([],) + s[5:],
                'ad': self.addresses(o), 'lo': 10 ** 6 + num, 'll': []}

    def enter(self, o):
        num = self.next
        self.next += 1
        self.live.append((num, o))
        self.var[id(o)] = num
        return num

    def sound(self, o):
        "Can be an operand later."
        if not is_larry(o) or o.ndim == 0 or o.ndim > 4 or o.size > 36:
            return False
        k = o.x.dtype.kind
        try:
            if not all(l in self.g.uni for z in o.label for l in z):
                return False
        except TypeError:
            return False
        if k == 'f':
            return o.x.dtype.itemsize == 8 and all(
                v != v or abs(v) in (gen.inf,) or
                (abs(v) <= 200 and v * 8 == int(v * 8))
                for v in rec.tolist(o.x))
        if k in 'iu':
            return k == 'i' and all(abs(v) <= 200 for v in rec.tolist(o.x))
        if k == 'O':
            return all(v is None or isinstance(v, (str, int, float))
                       for v in rec.tolist(o.x))
        return k in 'bS'

    def event(self, op, inputs, fn, args=None, inplace=None, out=None,
              tr=None, share=True, strict=False, scalar_kind=None, intr=None,
              outputs=None, views=False):
        if intr is not None or strict or outputs is not None or self.dead:
            return 'err', None
        if inplace not in (None, 0):
            return 'err', None
        ev = {'op': op, 'args': args or {}, 'tr': tr, 'drop': self.tmp}
        gone = set(self.tmp)
        for num, o in self.live:
            if num in gone:
                self.var.pop(id(o), None)
        self.live = [z for z in self.live if z[0] not in gone]
        self.pool = [o for o in self.pool if id(o) in self.var]
        self.tmp = []
        ev['new'] = []
        ev['x'] = []
        ev['refs'] = []
        for o in inputs:
            if is_larry(o):
                if id(o) not in self.var:
                    num = self.enter(o)
                    ev['new'].append(self.ref(o, num))
                ev['x'].append(self.var[id(o)])
                ev['refs'].append(self.var[id(o)])
            else:
                ev['x'].append(snap(o))
        # what the generator did to living larrys since the last step
        for num, o in self.live:
            if self.last.get(num, None) not in (None, repr(snap(o))):
                ev['new'].append(self.ref(o, num))
        pre = [snap(o) for o in inputs]
        before = [(num, o, repr(snap(o))) for num, o in self.live]
        oldaddr = [(o.label, o.x) for num, o in self.live if is_larry(o)]
        st, r, exc = self.call(fn, *inputs)
        if st == 'hang':
            self.dead = True
        live = r
        ev['out'] = {'st': st, 'exc': exc}
        if st == 'ok' and out is not None:
            r = out(r)
        if st == 'ok' and inplace is not None:
            r = inputs[inplace]
        ev['osnap'] = None
        if st == 'ok':
            ev['osnap'] = snap(r, self.kind_of_result(op, pre, r, inplace,
                                                      scalar_kind))
        post = [snap(o) for o in inputs]
        ev['post'] = []
        ev['chg'] = []
        for num, o, was in before:
            s = snap(o)
            if repr(s) != was:
                ev['chg'].append((num, s))
        ev['tgt'] = []
        ev['res'] = []
        fresh = []
        if st == 'ok' and inplace is not None:
            if is_larry(r):
                ev['tgt'].append(self.ref(r, self.var[id(r)]))
        elif st == 'ok' and share:
            for o in rec.parts(live if out is None else r):
                if isinstance(o, VIs) and not isinstance(
                        getattr(o, 'live', None), list):
                    continue
                if id(o) in self.var:
                    # the operand itself
                    w = la.larry(o.x, o.label, validate=False)
                    w.label = o.label
                    o = w
                num = self.enter(o)
                ev['res'].append(self.ref(o, num))
                fresh.append(o)
        del oldaddr
        self.last = dict((num, repr(snap(o))) for num, o in self.live)
        self.raw.append(ev)
        self.counts[op] = self.counts.get(op, 0) + 1
        # which of them live on
        for o in fresh + [o for o in inputs if is_larry(o)]:
            if not any(o is z for z in self.pool) and self.g.p(0.7):
                self.pool.append(o)
        self.pool = [o for o in self.pool if id(o) in self.var and self.sound(o)]
        while len(self.pool) > self.MAXPOOL:
            del self.pool[self.g.ri(0, len(self.pool) - 1)]
        keep = set(self.var[id(o)] for o in self.pool)
        self.tmp = [num for num, o in self.live if num not in keep]
        return st, r

    def scratch(self, name):
        return os.path.join(self.scratchdir, name)

    def write(self, ev):
        pass

    # writing down
    def encoded(self):
        u = self.u
        for ev in self.raw:
            for z in ev['new'] + ev['tgt'] + ev['res']:
                collect(nolabels(z['snap']), u)
            for s in [ev['osnap']] if ev['osnap'] else []:
                collect(nolabels(s), u)
            collect_arg(ev['args'], u)
            for z in ev['x']:
                if isinstance(z, tuple):
                    collect(nolabels(z), u)
        u.freeze()
        res = []
        for ev in self.raw:
            if u.n > 60 and ev['op'] in ('flatten', 'panel'):
                return None
            e = {'op': ev['op'], 'post': [], 'alias': 0, 'drop': ev['drop'],
                 'refs': ev['refs']}
            for k, v in ev['args'].items():
                e[k] = enc_arg(v, u)
            for f in ('new', 'tgt', 'res'):
                e[f] = [self.enc_ref(z, u) for z in ev[f]]
            e['x'] = [enc_snap(z, u) if isinstance(z, tuple) else {'var': z}
                      for z in ev['x']]
            o = dict(ev['out'])
            if ev['osnap'] is not None:
                o['v'] = enc_snap(ev['osnap'], u, ev['tr'])
            e['out'] = o
            e['chg'] = [{'id': num, 'v': enc_snap(s, u)} for num, s in ev['chg']]
            res.append(e)
        return res

    def enc_ref(self, z, u):
        s = enc_snap(z['snap'], u)
        return {'id': z['id'], 'k': s['k'], 'sh': s['sh'], 'dt': s['dt'],
                'd': s['d'], 'lab': s['lab'], 'ad': z['ad'], 'lo': z['lo'],
                'll': z['ll']}


def nolabels(s):
    "Tuples get their number from their parts."
    if s[0] == 'L':
        return s[:4] + ([[v for v in l if not isinstance(v, tuple)]
                         for l in s[4]],) + s[5:]
    if s[0] == 'V':
        return ('V', [nolabels(z) for z in s[1]])
    return s


# Steps that only histories have ----------------------------------------------
def tamper(g, R):
    "Someone writes to the data or the labels directly."
    y = g.larry()
    if y.size == 0:
        return
    if g.p(0.5):
        ix = g.cell(y.shape)
        at = int(np.ravel_multi_index(ix, y.shape))
        k, c = oc.scalar_for(g, y)

        def fn(y):
            y.x[ix] = c
        R.event('tamper', [y], fn, inplace=0,
                args={'at': at, 'c': Ce(c), 'tax': -1, 'v': Lbs([])})
        return
    a = g.ri(0, y.ndim - 1)
    new = g.shuffled(y.label[a])
    if g.p(0.4):
        rest = [l for l in g.uni if l not in new]
        if rest:
            new[g.ri(0, len(new) - 1)] = g.ch(rest)

    def fn(y):
        y.label[a][:] = new
    R.event('tamper', [y], fn, inplace=0,
            args={'at': -1, 'c': Ce(0), 'tax': a, 'v': Lbs(new)})


def view(g, R):
    y = g.larry()
    how = g.ch(['getitem', 'getitem', 'squeeze', 'pull', 'getx', 'lix'])
    if how == 'getitem':
        o, t = oc.index(g, y, seqs=())
        R.event('getitem', [y], lambda y: y[o], args={'ix': t})
    elif how == 'squeeze':
        if max(list(y.shape) + [0]) > 1 or 0 in y.shape:
            R.event('squeeze', [y], lambda y: y.squeeze())
    elif how == 'pull':
        a = g.ri(0, y.ndim - 1)
        if y.ndim > 1 and y.shape[a]:
            name = g.ch(y.label[a])
            R.event('pull', [y], lambda y: y.pull(name, a),
                    args={'name': Lb(name), 'ax': a})
    elif how == 'lix':
        oc.lix(g, R)
    else:
        def arr(r):
            return g.la.larry(r, [list(l) for l in y.label], validate=False)
        R.event('getx', [y], lambda y: y.getx(copy=False), out=arr,
                args={'copy': 0})


def fillrow(g, R):
    y = g.larry()
    k, c = oc.scalar_for(g, y)
    R.event('fill', [y], lambda y: y.fill(c), inplace=0, args={'c': Ce(c)})


def copying(g, R):
    oc.copies(g, R)


def index_nolive(g, y):
    return oc.index(g, y, seqs=('q', 'b'), strict=True)


def setfrom(g, R):
    "Assign a living larry (perhaps a view of the target) to a selection."
    y = g.larry()
    c = [z for z in g.H.pool if z.x.dtype.kind == y.x.dtype.kind and
         z.ndim <= y.ndim]
    if not c or not y.ndim:
        return
    v = g.ch(c)
    ix, toks = [], []
    # find a selection of y with the labels of v
    axes = sorted(g.r.sample(range(y.ndim), v.ndim))
    j = 0
    for a in range(y.ndim):
        if a in axes:
            want = v.label[j]
            j += 1
            if want == y.label[a]:
                ix.append(slice(None))
                toks.append(oc.stok(slice(None)))
                continue
            found = None
            for s in [slice(i, k, st) for i in range(len(y.label[a]))
                      for k in range(len(y.label[a]) + 1) for st in (1, 2)]:
                if y.label[a][s] == want:
                    found = s
            if found is None:
                found = slice(0, len(want))
            ix.append(found)
            toks.append(oc.stok(found))
        else:
            if not y.shape[a]:
                return
            i = g.ri(0, y.shape[a] - 1)
            ix.append(i)
            toks.append({'y': 'i', 'v': [i], 'lab': []})
    ix = tuple(ix)
    enc = {'y': 'l', 'k': oc.kindof(y), 'c': [4, 0, 0], 'sh': list(v.shape),
           'd': [Ce(z) for z in rec.tolist(v.x)],
           'lab': [Lbs(l) for l in v.label]}

    def fn(y, v):
        y[ix] = v
    if g.p(0.5) and v.ndim == y.ndim:
        lx = []
        lt = []
        for s, t in zip(ix, toks):
            lx.append(s)
            lt.append(dict(t, la=0, lb=0))
        if all(len(range(*s.indices(m))) for s, m in zip(lx, y.shape)) and \
                0 not in y.shape:
            def fn(y, v):
                y.lix[tuple(lx)] = v
            R.event('lixset', [y, v], fn, inplace=0,
                    args={'ix': lt, 'tup': 1, 'v': enc})
            return
    R.event('setitem', [y, v], fn, inplace=0, args={'ix': toks, 'v': enc})


def shuf(g, R):
    "Shuffles of distinct cells"
    y = g.larry(kinds=['f', 'i'])
    v = [z for z in rec.tolist(y.x)]
    if len(set(v)) != len(v) or any(z != z for z in v):
        return
    ax = g.axis(y.ndim, none=0.3)
    R.event('shuffle', [y], lambda y: y.shuffle(ax), inplace=0,
            args={'ax': oc.ax_(ax)})


def shuflab(g, R):
    y = g.larry()
    ax = g.axis(y.ndim, none=0.3)
    R.event('shufflelabel', [y], lambda y: y.shufflelabel(ax), inplace=0,
            args={'ax': oc.ax_(ax)})


def flipview(g, R):
    y = g.larry()
    ax = g.axis(y.ndim, none=0.25, bad=0)
    R.event('flipaxis', [y], lambda y: y.flipaxis(ax, copy=False), inplace=0,
            args={'ax': oc.ax_(ax), 'copy': 0})


OWN = [(tamper, 6), (view, 14), (copying, 4), (setfrom, 8), (fillrow, 2),
       (shuf, 3), (shuflab, 4), (flipview, 3)]
NOT = set(['align_raw', 'flatten', 'unflatten', 'shuffle', 'shufflelabel', 'squeeze',
           'torows', 'tofile', 'csvtrip', 'construct', 'copies', 'fill'])
STRUCT = ['C02', 'C03', 'C04', 'C05', 'C08', 'C09', 'C10', 'C11', 'C12']
CALC = ['C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C25', 'C33']


def table():
    t = [(f, w, True) for f, w in OWN]
    for ps, tot, live in ((STRUCT, 55.0, True), (['C06', 'C07'], 6.0, True),
                          (CALC, 12.0, False)):
        fs = [(f, w) for p in ps for f, w in oc.OPS[p]
              if f.__name__ not in NOT]
        s = float(sum(w for f, w in fs))
        t += [(f, w * tot / s, live) for f, w in fs]
    return t


def pick(g, t):
    z = g.r.random() * sum(w for f, w, l in t)
    for f, w, l in t:
        z -= w
        if z <= 0:
            return f, l
    return t[-1][0], t[-1][2]


def main():
    base = tempfile.mkdtemp(prefix='lahist')
    t = table()
    skipped = hangs = 0
    counts = {}
    plan = None
    if os.environ.get('LA_PLAN'):
        plan = [json.loads(l) for l in open(os.environ['LA_PLAN'])]
    f = open(out, 'w')
    try:
        todo = plan if plan is not None else range(n)
        for num, item in enumerate(todo):
            g = HG(la, 'h%s-%s-%d' % (seed, prop, num))
            np.random.seed(g.ri(0, 10 ** 6))
            P = Program(g)
            P.scratchdir = base
            g.start(P)
            if plan is not None:
                import plan_larry
                plan_larry.replay(g, P, item)
            else:
                steps = g.ri(20, 60)
                while len(P.raw) < steps and not P.dead:
                    fn, g.fromlive = pick(g, t)
                    try:
                        fn(g, P)
                    except Exception:
                        where = [os.path.abspath(z[0]) for z in
                                 traceback.extract_tb(sys.exc_info()[2])]
                        skipped += 1
                        if skipped < 4:
                            traceback.print_exc()
            ev = P.encoded()
            if ev:
                f.write(json.dumps({'ev': ev}, sort_keys=True) + '\n')
            for k, v in P.counts.items():
                counts[k] = counts.get(k, 0) + v
            hangs += P.hangs
            if hangs > 2:
                break
    finally:
        f.close()
        shutil.rmtree(base, ignore_errors=True)
    print('skipped %d' % (skipped // 10))
    for k in sorted(counts):
        print('  %s %d' % (k, counts[k]))


main()
